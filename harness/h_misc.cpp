#undef NDEBUG // Eigen's own size checks are part of the contract here
// Contracts of the Huber kernel (C20), numerical Jacobians (C21) and the factor test of the graph (C37)
#include "absgraph.hpp"
#include "factorama/kernels.hpp"
#include "factorama/numerical_jacobian.hpp"
#include <algorithm>

// ---------------------------------------------------------------- C20
static VectorXd residual(int n)
{
    VectorXd r(n);
    for (int i = 0; i < n; i++) r[i] = vsym("r", i, 0);
    return r;
}
static double length(const VectorXd& r)
{
    double s = 0;
    for (int i = 0; i < r.size(); i++) s += r[i] * r[i];
    return std::sqrt(s);
}
static void huber(int n)
{
    double delta = vsym("delta", 0, 1);
    vassume(delta, 3, 1e-12);
    HuberKernel k(delta);
    ResidualKernel& K = k;
    VTRUE("C20", "delta", vsame(k.delta(), delta));
    VectorXd r = residual(n), r0 = r;
    double len = length(r);
    bool inside = len <= delta;
    double w = inside ? 1 : std::sqrt(delta / len);
    VectorXd y = K.apply_to_residual(r), e(n);
    for (int i = 0; i < n; i++) e[i] = w * r0[i];
    VSAME("C20", "the residual is kept within delta and scaled by sqrt(delta/norm) beyond", y, e);
    VSAME("C20", "the residual passed in is untouched", r, r0);
    // Jacobians: 3 columns, 1 column, empty (constant variable), 2 columns
    std::vector<MatrixXd> J(4), J0;
    const int cols[4] = {3, 1, 0, 2};
    int skip = vchoose("empty first", 2);
    for (int i = 0; i < 4; i++) {
        int c = cols[(i + 2 * skip) % 4];
        if (!c) continue;
        J[i].resize(n, c);
        for (int q = 0; q < J[i].size(); q++) J[i].data()[q] = vsym("J", 20 * i + q, 0);
    }
    J0 = J;
    K.apply_to_jacobians(r, J);
    VTRUE("C20", "the list of Jacobians keeps its length", J.size() == J0.size());
    for (size_t i = 0; i < J0.size() && i < J.size(); i++) {
        VTRUE("C20", "a Jacobian keeps its shape", J[i].rows() == J0[i].rows() && J[i].cols() == J0[i].cols());
        if (J[i].rows() != J0[i].rows() || J[i].cols() != J0[i].cols() || !J0[i].size()) continue;
        // derivative of sqrt(delta) |r|^(-1/2) r:  w (I - r r^T / (2 |r|^2))
        MatrixXd E = J0[i];
        if (!inside)
            for (int c = 0; c < E.cols(); c++) {
                double d = 0;
                for (int a = 0; a < n; a++) d += r0[a] * J0[i](a, c);
                for (int a = 0; a < n; a++) E(a, c) = w * (J0[i](a, c) - r0[a] * d / (2 * len * len));
            }
        VEQ("C20", "the Jacobian is that of the scaled residual", J[i].data(), E.data(), E.size());
    }
    VSAME("C20", "the residual passed in is untouched", r, r0);
    K.apply_to_jacobians(r, J0 = std::vector<MatrixXd>());
    VTRUE("C20", "an empty list stays empty", J0.empty());
}
extern "C" void m_huber_1() { huber(1); }
extern "C" void m_huber_2() { huber(2); }
extern "C" void m_huber_3() { huber(3); }
extern "C" void m_huber_4() { huber(4); }
extern "C" void m_huber_zero()
{
    double delta = vsym("delta", 0, 1);
    vassume(delta, 3, 0);
    HuberKernel k(delta);
    int n = 1 + vchoose("size", 4);
    VectorXd r = VectorXd::Zero(n), y = k.apply_to_residual(r);
    VSAME("C20", "a zero residual is kept", y, r);
    std::vector<MatrixXd> J(1, MatrixXd(n, 2));
    for (int q = 0; q < J[0].size(); q++) J[0].data()[q] = vsym("J", q, 0);
    std::vector<MatrixXd> J0 = J;
    k.apply_to_jacobians(r, J);
    VTRUE("C20", "a Jacobian keeps its shape", J[0].rows() == n && J[0].cols() == 2);
    VEQ("C20", "the Jacobian at a zero residual is kept", J[0].data(), J0[0].data(), J0[0].size());
}

// ---------------------------------------------------------------- C21
static void stale(std::vector<MatrixXd>& J, int js)
{
    static const int len[4] = {0, 1, 2, 5};
    J.resize(len[js]);
    for (size_t i = 0; i < J.size(); i++) {
        J[i].resize(js, 2);
        for (int q = 0; q < J[i].size(); q++) J[i].data()[q] = vsym("garbage", 10 * int(i) + q, 0);
    }
}
extern "C" void m_numjac()
{
    World w;
    int d = vchoose("dims", 3), c = vchoose("constant", 8);
    static const int dims[3][3] = {{1, 2, 3}, {3, 1, 1}, {2, 2, 1}};
    for (int i = 0; i < 3; i++) w.var(5 + 3 * i, dims[d][i], c >> i & 1);
    static const std::vector<std::vector<int>> sub = {{0}, {1, 0}, {0, 1, 2}, {2, 0, 1}};
    int rows = 1 + vchoose("rows", 2);
    w.fac(3, sub[vchoose("variables", 4)], rows);
    AbsFac& f = *w.f[0];
    double eps = vsym("eps", 0, 1);
    vassume(eps, 2, 0);
    std::vector<MatrixXd> J;
    stale(J, vchoose("jstate", 4));
    std::vector<VectorXd> x0;
    for (auto& v : w.v) x0.push_back(v->x);
    Factor& F = f;
    ComputeNumericalJacobians(F, J, eps);
    VTRUE("C21", "one Jacobian for every variable", J.size() == f.vs.size());
    for (size_t i = 0; i < w.v.size(); i++) {
        VSAME("C21", "every variable is left as it was", w.v[i]->x, x0[i]);
        VTRUE("C21", "constancy is left as it was", w.v[i]->is_constant() == (c >> i & 1));
        VTRUE("C21", "a constant variable is never moved", !w.v[i]->is_constant() || w.v[i]->incs + w.v[i]->sets == 0);
    }
    for (size_t i = 0; i < f.vs.size() && i < J.size(); i++) {
        AbsVar& v = *f.vs[i];
        if (v.is_constant()) {
            VTRUE("C21", "a constant variable has an empty Jacobian", J[i].rows() == 0 && J[i].cols() == 0);
            continue;
        }
        MatrixXd E(rows, v.size());
        VectorXd x = v.x, dx = VectorXd::Zero(v.size());
        for (int k = 0; k < v.size(); k++) {
            dx[k] = eps;
            v.x = v.plus(x, dx);
            VectorXd p = f.r();
            dx[k] = -eps;
            v.x = v.plus(x, dx);
            VectorXd m = f.r();
            v.x = x;
            dx[k] = 0;
            for (int q = 0; q < rows; q++) E(q, k) = (p[q] - m[q]) / (2 * eps);
        }
        VMAT("C21", "central difference", J[i], E);
    }
}
// any residual over real variables: the state of every variable type is restored
struct AnyFac : Factor
{
    std::vector<Variable *> vs;
    const double *R[8] = {};
    AnyFac() { id_ = 1; }
    int residual_size() const override { return 1; }
    VectorXd compute_residual() const override
    {
        std::vector<double> a;
        for (size_t i = 0; i < vs.size(); i++) {
            const VectorXd& x = vs[i]->value();
            for (int k = 0; k < x.size(); k++) a.push_back(x[k]);
            for (int k = 0; R[i] && k < 9; k++) a.push_back(R[i][k]);
        }
        VectorXd y(1);
        y[0] = vuf("any", 0, a.data(), int(a.size()), 0);
        return y;
    }
    void compute_residual(Eigen::Ref<VectorXd> y) const override { y = compute_residual(); }
    void compute_jacobians(std::vector<MatrixXd>& J) const override { J.clear(); }
    std::vector<Variable *> variables() override { return vs; }
    FactorType::FactorTypeEnum type() const override { return FactorType::custom; }
    std::string name() const override { return "any"; }
};
static void restored(Variable& v, const double *R)
{
    AnyFac f;
    f.vs.push_back(&v);
    f.R[0] = R;
    if (vchoose("const", 2)) v.set_constant(true);
    VectorXd x = v.value();
    double m[9];
    for (int i = 0; R && i < 9; i++) m[i] = R[i];
    std::vector<MatrixXd> J;
    Factor& F = f;
    ComputeNumericalJacobians(F, J, 1e-6);
    VSAME("C21", "a real variable is left as it was", v.value(), x);
    if (R) VTOL("C21", "the cached rotation is left as it was", "1e-12", R, m, 9);
    VTRUE("C21", "shape", J.size() == 1 && (v.is_constant() ? J[0].size() == 0 : J[0].rows() == 1 && J[0].cols() == v.size()));
}
extern "C" void m_numjac_rotation()
{
    SymRot p(1, "q");
    restored(p.v, p.v.rotation().data());
}
extern "C" void m_numjac_generic()
{
    VectorXd x(3);
    for (int i = 0; i < 3; i++) x[i] = vsym("x", i, 0);
    GenericVariable v(1, x);
    restored(v, nullptr);
}
extern "C" void m_numjac_landmark()
{
    LandmarkVariable v(1, Vector3d(vsym("x", 0, 0), vsym("x", 1, 0), vsym("x", 2, 0)));
    restored(v, nullptr);
}
extern "C" void m_numjac_pose2d()
{
    Pose2DVariable v(1, pose2("p", "th"));
    restored(v, nullptr);
}

// ---------------------------------------------------------------- C37
struct TestFac : AbsFac
{
    int kind = 0; // what compute_jacobians hands out
    using AbsFac::AbsFac;
    void compute_jacobians(std::vector<MatrixXd>& J) const override
    {
        AbsFac::compute_jacobians(J);
        if (kind == 1) J.push_back(MatrixXd(1, 1));
        if (kind == 2) J.pop_back();
        if (kind == 3) J.back() = MatrixXd::Zero(J.back().rows(), J.back().cols() + 1);
        if (kind == 4) J.back() = MatrixXd::Zero(J.back().rows() + 1, J.back().cols());
        if (kind == 5) J.back()(J.back().rows() - 1, 0) = std::nan("");
        if (kind == 6) J.back() = MatrixXd();
    }
};
static double largest(const MatrixXd& m) { return m.cwiseAbs().maxCoeff(); }
static void factor_test(int nf, int rows, int kinds, bool cst)
{
    FactorGraph g;
    auto a = std::make_shared<AbsVar>(4, 1, cst), b = std::make_shared<AbsVar>(9, 1, false);
    a->fresh(0);
    b->fresh(0);
    if (cst) g.add_variable(a);
    g.add_variable(b);
    std::vector<std::shared_ptr<TestFac>> f;
    int at = vchoose("which", nf), kind = vchoose("kind", kinds);
    for (int i = 0; i < nf; i++) {
        std::vector<AbsVar *> vs = {b.get()};
        if (cst) vs.insert(vs.begin(), a.get());
        f.push_back(std::make_shared<TestFac>(20 + i, vs, rows));
        if (i == at) f.back()->kind = kind;
        g.add_factor(f.back());
    }
    g.finalize_structure();
    double tol = vsym("tol", 0, 1);
    VectorXd xa = a->x, xb = b->x;
    bool got = g.detailed_factor_test(tol, false);
    VSAME("C37", "the test leaves the values as they were", a->x, xa);
    VSAME("C37", "the test leaves the values as they were", b->x, xb);
    bool want = kind == 0;
    if (want)
        for (auto& p : f) {
            Factor& F = *p;
            std::vector<MatrixXd> J, N;
            p->compute_jacobians(J);
            ComputeNumericalJacobians(F, N);
            double t = std::max(1e-2, largest(N.back()) * tol);
            if (largest(N.back() - J.back()) >= t) want = false;
        }
    VTRUE("C37", "the test passes exactly when every analytic Jacobian is within tolerance of the central difference", got == want);
}
extern "C" void m_test_one() { factor_test(1, 1, 7, false); }
extern "C" void m_test_rows() { factor_test(1, 2, 1, true); }
extern "C" void m_test_two() { factor_test(2, 1, 7, true); }
extern "C" void m_test_const()
{
    // a constant variable with a Jacobian that is not empty
    FactorGraph g;
    auto a = std::make_shared<AbsVar>(4, 2, true), b = std::make_shared<AbsVar>(9, 1, false);
    a->fresh(0);
    b->fresh(0);
    g.add_variable(a);
    g.add_variable(b);
    struct Bad : AbsFac
    {
        using AbsFac::AbsFac;
        void compute_jacobians(std::vector<MatrixXd>& J) const override
        {
            J.assign(2, MatrixXd());
            J[0] = MatrixXd::Zero(1, 2);
            J[1] = j(1);
        }
    };
    g.add_factor(std::make_shared<Bad>(3, std::vector<AbsVar *>{a.get(), b.get()}, 1));
    g.finalize_structure();
    VTRUE("C37", "a Jacobian of a constant variable fails the test", !g.detailed_factor_test(vchoose("tol", 2) ? 1e-6 : 1e9, false));
}
extern "C" void m_test_before()
{
    World w;
    w.var(3, 1, false);
    w.fac(1, {0}, 1);
    w.add_all();
    bool threw = false;
    try {
        w.g->detailed_factor_test(1e-3, false);
    } catch (const std::exception&) {
        threw = true;
    }
    VTRUE("C37", "the test before finalize_structure is refused", threw);
    w.g->finalize_structure();
    if (vchoose("again", 2)) {
        auto v = std::make_shared<AbsVar>(30, 1, false);
        v->fresh(0);
        w.g->add_variable(v);
        threw = false;
        try {
            w.g->detailed_factor_test(1e-3, false);
        } catch (const std::exception&) {
            threw = true;
        }
        VTRUE("C37", "the test after a change and before finalize_structure is refused", threw);
    }
}
