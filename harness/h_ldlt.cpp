// The contract the optimizer harness assumes of the linear solver, discharged on Eigen's own code for small matrices:
// when factorising reports success no pivot is zero, and a solve returns the solution of H x = b.
#include <Eigen/SparseCholesky>
#include "vassert.hpp"
typedef Eigen::SparseMatrix<double> Sp;
typedef Eigen::SimplicialLDLT<Sp> LDLT;
// any symmetric matrix with full diagonal and one of the patterns of off-diagonal entries
static MatrixXd matrix(const char *nm, int n, Sp& S, int pattern)
{
    MatrixXd H = MatrixXd::Zero(n, n);
    std::vector<Eigen::Triplet<double>> t;
    int k = 0;
    for (int i = 0; i < n; i++)
        for (int j = 0; j <= i; j++) {
            if (i != j && !(pattern >> k++ & 1)) continue;
            H(i, j) = H(j, i) = vsym(nm, 10 * i + j, 0);
            t.emplace_back(i, j, H(i, j));
            if (i != j) t.emplace_back(j, i, H(i, j));
        }
    S.resize(n, n);
    S.setFromTriplets(t.begin(), t.end());
    return H;
}
static void solved(LDLT& s, const MatrixXd& H, const char *nm, int cols)
{
    int n = int(H.rows());
#ifdef VNATIVE // rounding errors are not judged
    VectorXd D = s.vectorD().cwiseAbs();
    double big = H.cwiseAbs().maxCoeff();
    if (!(D.minCoeff() > 1e-5 * big && D.maxCoeff() < 1e5 * big)) return;
#endif
    VTRUE("C32", "the solver reports success", s.info() == Eigen::Success);
    VTRUE("C32", "one pivot per row", s.vectorD().size() == n);
    if (cols == 1) {
        VectorXd b(n);
        for (int i = 0; i < n; i++) b[i] = vsym(nm, i, 0);
        VectorXd x = s.solve(b), y = H * x;
        VSAME("C32", "a solve returns the solution", y, b);
    } else {
        MatrixXd B = MatrixXd::Identity(n, n).leftCols(cols < n ? cols : n), X = s.solve(B), Y = H * X;
        VTRUE("C32", "shape of the solution", X.rows() == n && X.cols() == B.cols());
        VEQ("C32", "a solve with several right-hand sides returns the solutions", Y.data(), B.data(), B.size());
    }
    VTRUE("C32", "the solver reports success", s.info() == Eigen::Success);
}
static void ldlt(int n, int patterns, int cols)
{
    LDLT s;
    Sp S;
    int p = vchoose("pattern", patterns);
    MatrixXd H = matrix("h", n, S, p);
    s.compute(S);
    if (s.info() != Eigen::Success) return;
    solved(s, H, "b", cols);
    // the same solver object again, for another matrix of another pattern
    if (n > 3 || !vchoose("again", 2)) return;
    int m = n == 1 ? 2 : n - 1;
    H = matrix("g", m, S, m == 1 ? 0 : 1);
    s.compute(S);
    if (s.info() != Eigen::Success) return;
    solved(s, H, "c", 1);
}
extern "C" void l_one() { ldlt(1, 1, 1); }
extern "C" void l_two() { ldlt(2, 2, 1); }
extern "C" void l_three() { ldlt(3, 8, 1); }
extern "C" void l_four() { ldlt(4, 64, 1); }
extern "C" void l_many() { ldlt(3, 8, 2); }
// the pivots of a normal matrix are not negative
extern "C" void l_gram()
{
    int n = 1 + vchoose("columns", 2), m = 1 + vchoose("rows", 2);
    MatrixXd J(m, n), H(n, n);
    for (int i = 0; i < m * n; i++) J.data()[i] = vsym("j", i, 0);
    double lambda = vchoose("damping", 2) ? vsym("lambda", 0, 1) : 0;
    std::vector<Eigen::Triplet<double>> t;
    for (int i = 0; i < n; i++)
        for (int k = 0; k < n; k++) {
            H(i, k) = i == k ? lambda : 0;
            for (int q = 0; q < m; q++) H(i, k) += J(q, i) * J(q, k);
            t.emplace_back(i, k, H(i, k));
        }
    Sp S(n, n);
    S.setFromTriplets(t.begin(), t.end());
    LDLT s;
    s.compute(S);
    if (s.info() != Eigen::Success) return;
    VectorXd D = s.vectorD(), z = VectorXd::Zero(n);
    VLE("C32", "the pivots of a normal matrix are not negative", z.data(), D.data(), n);
}
