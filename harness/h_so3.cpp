// Contracts of the SO(3) functions themselves (C01). Everywhere else these contracts stand for the functions.
#include "vassert.hpp"
#include "factorama/random_utils.hpp"
using Eigen::Matrix3d;
extern "C" void vjl(const double *v3, double *m9); // left Jacobian of the exponential, column major
static Vector3d vec(const char *nm)
{
    // natively also short vectors and vectors of length close to pi
    Vector3d v(vsym(nm, 0, 0), vsym(nm, 1, 0), vsym(nm, 2, 0));
    return v;
}
extern "C" void s_exp()
{
    Vector3d v = vec("v");
    Matrix3d M = ExpMapSO3(v), E = exp3(v);
    VTOL("C01", "ExpMapSO3 is the exponential map", "1e-12", M.data(), E.data(), 9);
}
extern "C" void s_log()
{
    Matrix3d M = quat3("q");
    Vector3d v = LogMapSO3(M);
    Matrix3d E = exp3(v);
    VTOL("C01", "the exponential of LogMapSO3(R) is R", "1e-12", E.data(), M.data(), 9);
    double n = v.norm(), pi = 3.14159265359;
    VLE("C01", "LogMapSO3 has length at most pi", &n, &pi, 1);
}
extern "C" void s_jinv()
{
    Vector3d v = vec("v");
    double pi = 3.1415926535897932;
    vassume(v.norm(), 0, pi);
    Matrix3d J = compute_inverse_right_jacobian_so3(v), L;
    vjl(v.data(), L.data());
    Matrix3d P = J * L, I = Matrix3d::Identity();
    VTOL("C01", "compute_inverse_right_jacobian_so3 inverts the left Jacobian", "1e-12", P.data(), I.data(), 9);
}
extern "C" void s_skew()
{
    Vector3d a = vec("v"), b = vec("w");
    Vector3d c = skew_symmetric(a) * b, x(a(1) * b(2) - a(2) * b(1), a(2) * b(0) - a(0) * b(2), a(0) * b(1) - a(1) * b(0));
    VEQ("C01", "skew_symmetric is the cross product", c.data(), x.data(), 3);
    Vector3d u = unskew(skew_symmetric(a));
    VEQ("C01", "unskew inverts skew_symmetric", u.data(), a.data(), 3);
}
