// native: -O0
// Contracts of SparseOptimizer (C29-C35), for abstract variables and factors and for a solver known only by its
// contract: factorising may fail, the pivots are arbitrary, and a solve returns Hinv * b where Hinv is some
// symmetric matrix determined by the factorised matrix.
#define protected public
#include <Eigen/SparseCholesky>
#undef protected
#include "absgraph.hpp"
#include "factorama/sparse_optimizer.hpp"
typedef Eigen::SimplicialLDLT<Eigen::SparseMatrix<double>> LDLT;
typedef Eigen::SimplicialCholeskyBase<LDLT> LBase;
static MatrixXd vinv(const MatrixXd& H)
{
    int n = int(H.rows());
    MatrixXd X(n, n);
    for (int i = 0; i < n; i++)
        for (int j = 0; j <= i; j++) X(i, j) = X(j, i) = vuf("Hinv", 100 * i + j, H.data(), n * n, 0);
    return X;
}
struct Run
{
    World *w;
    SparseOptimizer *o;
    OptimizerSettings s;
    MatrixXd H; // the matrix held by the solver
    bool cut;   // every trial starts from an arbitrary state (loop invariants), see engine/cut.py
    int plan;   // 0: any outcome of factorising and solving, 1: always succeeds with pivots 1
    int covariance; // the matrix is factorised for covariances
    bool nans;  // an updated state may have a residual that is not a number
    bool lm, applied, started;
    double lambda, chi2_0;
    std::vector<VectorXd> before;
    double cost_before;
    VectorXd dx;      // what the contract says the increment is
    int napplied;     // variables updated in this trial
    int steps;        // trials applied and kept
    int open;         // the last trial was not kept
    int npivots, ncov;
    bool throwing;    // an updated state may make a factor throw
    bool factored, solved; // outcome of the last factorisation and solve for covariances
};
static Run *R;
static std::vector<VectorXd> all_values(World& w)
{
    std::vector<VectorXd> x;
    for (auto& v : w.v) x.push_back(v->x);
    return x;
}
static bool same(const std::vector<VectorXd>& a, const std::vector<VectorXd>& b)
{
    for (size_t i = 0; i < a.size(); i++)
        for (int k = 0; k < a[i].size(); k++)
            if (!vsame(a[i][k], b[i][k])) return false;
    return true;
}
static void assume_settings(const OptimizerSettings& s)
{
    vassume(s.max_lambda, 3, 1e-12);
    vassume(s.lambda_up_factor, 3, 1);
    vassume(s.lambda_down_factor, 1, 1);
}
struct OVar : AbsVar
{
    using AbsVar::AbsVar;
    void apply_increment(const VectorXd& d) override
    {
        VTRUE("C31", "no increment of a constant variable", !is_constant_);
        if (R && R->started && !is_constant_) {
            int c = R->w->colof(this);
            VSAME("C32", "increment of a variable", d, VectorXd(R->dx.segment(c, x.size())));
            if (R->nans && R->napplied == 0) R->w->f[0]->nan = vchoose("nan", 2);
            if (R->throwing && R->napplied == 0) R->w->f[0]->throws = vchoose("throw", 2);
            R->napplied++;
            R->applied = true;
        }
        AbsVar::apply_increment(d);
    }
    void set_value_from_vector(const VectorXd& y) override
    {
        VTRUE("C31", "no value written to a constant variable", !is_constant_);
        if (R && R->nans) R->w->f[0]->nan = false;
        AbsVar::set_value_from_vector(y);
    }
};
static int nfree(World& w)
{
    int n = 0;
    for (auto& v : w.v) n += !v->is_constant();
    return n;
}
// the trial under way has ended
static void settle()
{
    Run& r = *R;
    if (!r.started) return;
    r.started = false;
    if (r.w->f[0]->throws) return;
    if (r.applied) VTRUE("C32", "every free variable is updated exactly once per trial", r.napplied == nfree(*r.w));
    bool kept = r.applied && (!r.lm || !same(all_values(*r.w), r.before));
    if (r.lm) {
        VectorXd res = r.w->residual();
        if (kept) VTRUE("C30", "a kept step strictly lowers the cost", 0.5 * res.squaredNorm() < r.cost_before);
        else
            for (size_t i = 0; i < r.before.size(); i++) VSAME("C30", "values restored exactly", r.w->v[i]->x, r.before[i]);
        if (kept) r.lambda = std::max(r.lambda * r.s.lambda_down_factor, 1e-12);
        else r.lambda = std::min(r.lambda * r.s.lambda_up_factor, r.s.max_lambda);
    }
    if (kept) r.steps++;
    r.open = r.lm && !kept;
}
// the matrix that is factorised: the diagonal is shifted as Eigen does it
static MatrixXd shifted(const LDLT& self, const Eigen::SparseMatrix<double>& m)
{
    MatrixXd H(m);
    for (int i = 0; i < H.rows() && i < H.cols(); i++) H(i, i) = H(i, i) * self.m_shiftScale + self.m_shiftOffset;
    return H;
}
static void solver_compute(LDLT& self, const Eigen::SparseMatrix<double>& m)
{
    Run& r = *R;
    r.H = shifted(self, m);
    int n = int(m.rows());
    static_cast<Eigen::SparseSolverBase<LDLT>&>(self).m_isInitialized = true;
    self.m_analysisIsOk = true;
    self.m_factorizationIsOk = false;
    self.m_info = Eigen::Success;
    self.m_diag.resize(n);
    r.factored = false;
    if (r.covariance) {
        MatrixXd J = r.w->jacobian(), N = J.transpose() * J;
        VMAT("C35", "the factorised matrix is that of the values left behind", r.H, N);
        r.ncov++;
    } else {
        // a new trial starts here
        settle();
        r.started = true;
        r.applied = false;
        r.napplied = 0;
        r.before = all_values(*r.w);
        VectorXd res = r.w->residual();
        double chi2 = res.squaredNorm(), lo = 1e-12;
        VLE("C34", "the residual never exceeds the initial one when an iteration starts", &chi2, &r.chi2_0, 1);
        if (r.lm) {
            double& la = r.o->current_stats_.damping_parameter;
            VRATIO("C33", "damping of a trial", la, r.lambda);
            VLE("C33", "damping at least 1e-12", &lo, &la, 1);
            VLE("C33", "damping at most the maximum", &la, &r.s.max_lambda, 1);
            r.lambda = la;
        }
        if (r.cut) {
            for (size_t i = 0; i < r.w->v.size(); i++) {
                AbsVar& v = *r.w->v[i];
                if (v.is_constant()) vcut_keep(v.x.data(), int(v.x.size()));
                else vcut_basis(v.nm.c_str(), v.x.data(), int(v.x.size()), 0), v.sets = v.incs = 0;
            }
            r.npivots = 0;
            r.cost_before = 0;
            r.dx.resize(0);
            if (r.lm) vcut_basis("lambda", &r.lambda, 1, 0);
            vcut_weak("chi2_0", &r.chi2_0, 1, 0);
            vcut_keep(&r.s.step_tolerance, 1), vcut_keep(&r.s.residual_tolerance, 1), vcut_keep(&r.s.learning_rate, 1);
            vcut_keep(&r.s.max_lambda, 1), vcut_keep(&r.s.lambda_up_factor, 1), vcut_keep(&r.s.lambda_down_factor, 1);
            r.H.resize(0, 0);
            vcut_forget("Hinv");
            vcut("trial");
            r.H = shifted(self, m);
            res = r.w->residual();
            chi2 = res.squaredNorm();
            vassume(r.chi2_0, 3, chi2);
            assume_settings(r.s);
            if (r.lm) vassume(r.lambda, 3, 1e-12), vassume(r.lambda, 1, r.s.max_lambda);
        }
        r.before = all_values(*r.w);
        r.cost_before = 0.5 * chi2;
        MatrixXd J = r.w->jacobian(), N = J.transpose() * J;
        if (r.lm)
            for (int i = 0; i < n; i++) N(i, i) += r.lambda;
        r.dx = r.s.learning_rate * (vinv(N) * (-(J.transpose() * res)));
    }
    if (r.plan == 0 && vchoose("factorisation", 2) == 0) {
        self.m_info = Eigen::NumericalIssue;
        for (int i = 0; i < n; i++) self.m_diag[i] = vsym("garbageD", i, 0);
        return;
    }
    self.m_factorizationIsOk = r.factored = true;
    for (int i = 0; i < n; i++) self.m_diag[i] = r.plan == 0 ? vsym("pivot", r.npivots++, 1) : 1.0;
}
static void solver_solve(const LDLT& self, const MatrixXd& b, MatrixXd& x)
{
    x = vinv(R->H) * b;
    R->solved = true;
    if (R->plan != 0) return;
    int c = vchoose("solve", R->covariance ? 3 : 2);
    if (c == 1) self.m_info = Eigen::NumericalIssue;
    if (c == 2) x.setConstant(std::nan(""));
    R->solved = c != 2 && self.m_info == Eigen::Success;
}
namespace Eigen {
template <> template <> void LBase::compute<true>(const SparseMatrix<double>& m) { solver_compute(derived(), m); }
template <> void LBase::analyzePattern(const SparseMatrix<double>&, bool) {}
template <> template <> void LBase::factorize<true>(const SparseMatrix<double>& m) { solver_compute(derived(), m); }
template <> template <> void LBase::_solve_impl(const MatrixBase<VectorXd>& b, MatrixBase<VectorXd>& x) const
{
    MatrixXd y;
    solver_solve(derived(), b.derived(), y);
    x.derived() = y.col(0);
}
template <> template <> void LBase::_solve_impl(const MatrixBase<MatrixXd>& b, MatrixBase<MatrixXd>& x) const
{
    MatrixXd y;
    solver_solve(derived(), b.derived(), y);
    x.derived() = y;
}
} // namespace Eigen
// ---- problems
static void ovar(World& w, int id, int dim, bool cst)
{
    w.v.push_back(std::make_shared<OVar>(id, dim, cst));
    w.v.back()->fresh(0);
}
static void problem(World& w, int shape)
{
    if (shape == 0) {
        ovar(w, 7, 1, false), ovar(w, 2, 1, true), ovar(w, 11, 1, false);
        w.fac(30, {2, 1}, 1), w.fac(5, {0, 2}, 2);
    } else if (shape == 1) {
        ovar(w, 3, 1, true), ovar(w, 9, 1, false);
        w.fac(4, {1, 0}, 1);
    } else if (shape == 2) {
        ovar(w, 3, 2, false);
        w.fac(4, {0}, 1), w.fac(6, {0}, 1);
    } else {
        ovar(w, 40, 1, false), ovar(w, -3, 2, true), ovar(w, 2, 3, false), ovar(w, 1000, 1, true), ovar(w, 17, 2, false);
        w.fac(30, {4, 1}, 2), w.fac(5, {2}, 3), w.fac(-6, {3, 0, 4}, 1), w.fac(9, {2, 0}, 1);
    }
    w.add_all();
    w.g->finalize_structure();
}
static OptimizerSettings settings(bool lm)
{
    OptimizerSettings s;
    s.method = lm ? OptimizerMethod::LevenbergMarquardt : OptimizerMethod::GaussNewton;
    s.step_tolerance = vsym("step_tolerance", 0, 1);
    s.residual_tolerance = vsym("residual_tolerance", 0, 1);
    s.learning_rate = vsym("learning_rate", 0, 1);
    s.initial_lambda = vsym("initial_lambda", 0, 1);
    s.max_lambda = s.initial_lambda + vsym("max_lambda", 0, 1);
    s.lambda_up_factor = 1 + vsym("up", 0, 1);
    s.lambda_down_factor = vsym("down", 0, 1);
    vassume(s.initial_lambda, 3, 1e-12);
    assume_settings(s);
    return s;
}
static Run start(World& w, SparseOptimizer& o, OptimizerSettings s, bool lm)
{
    Run r;
    r.w = &w;
    r.o = &o;
    r.s = s;
    r.plan = r.covariance = 0;
    r.lm = lm;
    r.applied = r.started = r.nans = r.cut = r.throwing = r.factored = r.solved = false;
    r.lambda = s.initial_lambda;
    r.cost_before = 0;
    r.napplied = r.steps = r.open = r.npivots = r.ncov = 0;
    r.chi2_0 = w.residual().squaredNorm();
    return r;
}
static bool failure(OptimizerStatus s)
{
    return s == OptimizerStatus::SINGULAR_HESSIAN || s == OptimizerStatus::ILL_CONDITIONED || s == OptimizerStatus::DIVERGED ||
           s == OptimizerStatus::FAILED;
}
static void check_stats(World& w, SparseOptimizer& o)
{
    if (w.f[0]->nan) {
        VTRUE("C29", "a residual that is not a number is reported as such", std::isnan(o.current_stats_.chi2) && std::isnan(o.current_stats_.residual_norm));
        return;
    }
    VectorXd res = w.residual();
    double chi2 = res.squaredNorm(), nrm = std::sqrt(chi2);
    VEQ("C29", "chi2 is that of the values left behind", &o.current_stats_.chi2, &chi2, 1);
    VEQ("C29", "residual norm is that of the values left behind", &o.current_stats_.residual_norm, &nrm, 1);
}
static void check_final(World& w, Run& r, const std::vector<VectorXd>& x0)
{
    SparseOptimizer& o = *r.o;
    settle();
    if (!w.f[0]->throws) check_stats(w, o);
    else VTRUE("C34", "an exception inside a step ends the run as a failure", o.current_stats_.status == OptimizerStatus::FAILED && !o.current_stats_.valid);
    double nrm_0 = std::sqrt(r.chi2_0);
    VEQ("C29", "initial chi2", &o.initial_stats_.chi2, &r.chi2_0, 1);
    VEQ("C29", "initial residual norm", &o.initial_stats_.residual_norm, &nrm_0, 1);
    const OptimizerStats& c = o.current_stats_;
    VTRUE("C34", "status is not RUNNING", c.status != OptimizerStatus::RUNNING);
    if (c.status == OptimizerStatus::SUCCESS) {
        VTRUE("C34", "SUCCESS implies valid statistics", c.valid);
        VTRUE("C34", "SUCCESS implies a finite residual", std::isfinite(c.residual_norm));
        if (!(c.current_iteration > 0 && c.delta_norm < r.s.step_tolerance))
            VLE("C34", "SUCCESS implies a residual no larger than the initial one", &c.chi2, &r.chi2_0, 1);
    } else {
        VTRUE("C34", "a failure status is one of the failure codes", failure(c.status));
        VTRUE("C34", "a failure marks the statistics invalid", !c.valid);
    }
    for (size_t i = 0; i < w.v.size(); i++)
        if (w.v[i]->is_constant()) {
            VSAME("C31", "a constant variable keeps its value", w.v[i]->x, x0[i]);
            VTRUE("C31", "a constant variable is never updated", w.v[i]->sets == 0 && w.v[i]->incs == 0);
        }
    if (w.f[0]->throws) return;
    if (r.lm && r.s.max_num_iterations > 0 && nfree(w) > 0) VRATIO("C33", "damping left behind", c.damping_parameter, r.lambda);
    int it = c.current_iteration;
    VTRUE("C29", "iteration count within the maximum", it >= 0 && it <= int(r.s.max_num_iterations));
    VTRUE("C29", "iteration count", it == r.steps + r.open);
}
static void run(World& w, SparseOptimizer& o, const OptimizerSettings& s, bool lm, bool cut, int plan, bool nans = false, bool throwing = false)
{
    Run r = start(w, o, s, lm);
    r.cut = cut;
    r.plan = plan;
    r.nans = nans;
    r.throwing = throwing;
    R = &r;
    std::vector<VectorXd> x0 = all_values(w);
    for (auto& v : w.v) v->sets = v->incs = 0;
    o.optimize();
    check_final(w, r, x0);
    R = nullptr;
}
static void optimise(World& w, bool lm, int max, bool cut, int plan = 0, bool nans = false, bool verbose = false, bool throwing = false)
{
    OptimizerSettings s = settings(lm);
    s.max_num_iterations = max;
    s.verbose = verbose;
    s.check_rank_deficiency = verbose;
    auto o = std::make_shared<SparseOptimizer>();
    o->setup(w.g, s);
    run(w, *o, s, lm, cut, plan, nans, throwing);
}
#define ENTRY(name, shape, ...)                                                                                        \
    extern "C" void name()                                                                                             \
    {                                                                                                                  \
        World w;                                                                                                       \
        problem(w, shape);                                                                                             \
        optimise(w, __VA_ARGS__);                                                                                      \
    }
// Gauss-Newton; Levenberg-Marquardt: any outcome of every trial, arbitrary state at the start of every trial
ENTRY(o_gn_two, 0, false, 3, true)
ENTRY(o_gn_one, 1, false, 2, true)
ENTRY(o_gn_zero, 1, false, 0, true)
ENTRY(o_lm_zero, 1, true, 0, true)
ENTRY(o_gn_vec, 2, false, 2, true)
ENTRY(o_lm_two, 0, true, 1, true)
ENTRY(o_lm_one, 1, true, 2, true)
ENTRY(o_lm_vec, 2, true, 1, true)
// long runs (outcomes of the solver fixed for Levenberg-Marquardt)
ENTRY(o_gn_many, 1, false, 12, true)
ENTRY(o_lm_many, 1, true, 6, true, 1)
ENTRY(o_gn_long, 1, false, 40, true)
ENTRY(o_lm_long, 1, true, 12, true, 1)
// a larger problem: five variables with dimensions 1 to 3 (six free values, two constants), four factors (seven rows)
ENTRY(o_gn_big, 3, false, 1, true, 1)
ENTRY(o_lm_big, 3, true, 1, true, 1)
// the same with output, and with residuals that are not numbers
ENTRY(o_gn_verbose, 1, false, 2, true, 0, false, true)
ENTRY(o_lm_verbose, 1, true, 2, true, 0, false, true)
ENTRY(o_gn_nan, 1, false, 1, true, 0, true)
ENTRY(o_lm_nan, 1, true, 2, true, 0, true)
// a factor throws once the variables have been updated
ENTRY(o_gn_throw, 1, false, 1, true, 0, false, false, true)
ENTRY(o_lm_throw, 1, true, 1, true, 0, false, false, true)
// an optimizer that has run before, with the other method and other settings
static void again(bool lm, int how)
{
    World w;
    problem(w, 1);
    OptimizerSettings s = settings(!lm);
    s.max_num_iterations = 1;
    SparseOptimizer o;
    o.setup(w.g, s);
    run(w, o, s, !lm, false, how == 2 ? 0 : 1, false);
    if (how == 1) w.v[1]->fresh(1);
    s.method = lm ? OptimizerMethod::LevenbergMarquardt : OptimizerMethod::GaussNewton;
    s.initial_lambda *= 2;
    s.max_lambda *= 2;
    o.setup(w.g, s);
    run(w, o, s, lm, true, 0);
}
static void twice(bool lm)
{
    World w;
    problem(w, 1);
    OptimizerSettings s = settings(lm);
    s.max_num_iterations = 1;
    SparseOptimizer o;
    o.setup(w.g, s);
    run(w, o, s, lm, false, 1);
    run(w, o, s, lm, true, 0);
}
extern "C" void o_again_lm() { again(true, vchoose("how", 2)); }
extern "C" void o_again_gn() { again(false, 1); }
extern "C" void o_twice_lm() { twice(true); }
extern "C" void o_twice_gn() { twice(false); }
// nothing to optimise: no free variables
extern "C" void o_no_free()
{
    World w;
    ovar(w, 3, 1, true), ovar(w, 9, 2, true);
    w.fac(4, {1, 0}, 2);
    w.add_all();
    w.g->finalize_structure();
    optimise(w, vchoose("lm", 2), 2, true);
}
// no graph: an exception, not an invalid access
extern "C" void o_no_graph()
{
    SparseOptimizer o;
    R = nullptr;
    int lm = vchoose("lm", 2), call = vchoose("call", 2);
    OptimizerSettings s;
    s.method = lm ? OptimizerMethod::LevenbergMarquardt : OptimizerMethod::GaussNewton;
    if (call) o.setup(nullptr, s);
    bool threw = false;
    try {
        o.optimize();
    } catch (const std::exception&) {
        threw = true;
    }
    VTRUE("C34", "optimising without a graph throws", threw);
    bool valid = true;
    OVar v(1, 1, false);
    o.prepare_to_estimate_covariances();
    o.estimate_covariance(&v, valid);
    VTRUE("C35", "no covariance without an optimisation", !valid);
}
// ---- covariances
static Run cov_run(World& w, SparseOptimizer& o, const OptimizerSettings& s)
{
    Run r = start(w, o, s, s.method == OptimizerMethod::LevenbergMarquardt);
    r.plan = 1;
    return r;
}
static void no_covariance(World& w, SparseOptimizer& o, const char *)
{
    for (auto& v : w.v) {
        bool valid = true;
        o.estimate_covariance(v.get(), valid);
        VTRUE("C35", "no covariance before it is prepared for this run", !valid);
    }
}
static void covariances(World& w, SparseOptimizer& o, Run& r, bool all)
{
    r.covariance = 1;
    r.plan = all ? 0 : 1;
    r.started = false;
    o.prepare_to_estimate_covariances();
    bool ok = r.factored;
    MatrixXd J = w.jacobian(), N = J.transpose() * J, V = vinv(N);
    int rounds = all ? 1 : 2;
    for (int k = 0; k < rounds; k++) {
        if (k == 1) o.prepare_to_estimate_covariances(), ok = r.factored;
        for (auto& v : w.v) {
            bool valid = !ok;
            r.solved = false;
            MatrixXd P = o.estimate_covariance(v.get(), valid);
            if (v->is_constant()) {
                VTRUE("C35", "no covariance of a constant variable", !valid);
                continue;
            }
            if (!ok) {
                VTRUE("C35", "no covariance without a factorisation", !valid);
                continue;
            }
            if (!r.solved) {
                VTRUE("C35", "no covariance from a failed or non-finite solve", !valid);
                continue;
            }
            int c = w.colof(v.get()), n = v->size();
            MatrixXd B = V.block(c, c, n, n);
            bool large = false;
            for (int i = 0; i < n; i++) large = large || B(i, i) > 1e12;
            if (!large) VTRUE("C35", "a covariance is reported when the solver delivers it", valid);
            if (valid) VMAT("C35", "covariance", P, B);
        }
        bool valid = true;
        OVar other(77, 1, false);
        o.estimate_covariance(&other, valid);
        VTRUE("C35", "no covariance of a variable that is not in the graph", !valid);
        valid = true;
        o.estimate_covariance(nullptr, valid);
        VTRUE("C35", "no covariance of nothing", !valid);
    }
    r.covariance = 0;
}
static void cov(int shape, bool lm, int max, bool all, bool verbose, bool cut = false)
{
    World w;
    problem(w, shape);
    OptimizerSettings s = settings(lm);
    s.max_num_iterations = max;
    s.verbose = verbose;
    SparseOptimizer o;
    o.setup(w.g, s);
    Run r = cov_run(w, o, s);
    r.cut = cut;
    R = &r;
    no_covariance(w, o, "before");
    o.prepare_to_estimate_covariances();
    no_covariance(w, o, "prepared too early");
    o.optimize();
    no_covariance(w, o, "not prepared");
    covariances(w, o, r, all);
    R = nullptr;
}
extern "C" void o_cov_two() { cov(0, false, 0, true, false); }
extern "C" void o_cov_vec() { cov(2, true, 0, true, true); }
extern "C" void o_cov_gn() { cov(0, false, 1, false, false); }
extern "C" void o_cov_lm() { cov(1, true, 1, false, false); }
// after runs of several iterations; a larger problem
extern "C" void o_cov_many() { cov(1, vchoose("lm", 2), 3, false, false, true); }
extern "C" void o_cov_big() { cov(3, false, 0, false, false); }
// the optimizer is used again: for other values, for a changed graph, for another graph
extern "C" void o_cov_reuse()
{
    World w, w2;
    problem(w, 0);
    problem(w2, 2);
    OptimizerSettings s = settings(false);
    s.max_num_iterations = 0;
    SparseOptimizer o;
    o.setup(w.g, s);
    Run r = cov_run(w, o, s);
    R = &r;
    o.optimize();
    covariances(w, o, r, false);
    int how = vchoose("how", 3);
    if (how == 0) {
        for (auto& v : w.v)
            if (!v->is_constant()) v->fresh(1);
    } else if (how == 1) {
        w.v[0]->set_constant(true);
        w.v[1]->set_constant(false);
        w.g->finalize_structure();
    } else {
        o.setup(w2.g, s);
        no_covariance(w2, o, "another graph");
    }
    World& x = how == 2 ? w2 : w;
    Run r2 = cov_run(x, o, s);
    r2.H = r.H; // what the solver still holds
    R = &r2;
    o.optimize();
    no_covariance(x, o, "optimised again");
    covariances(x, o, r2, false);
    R = nullptr;
}
