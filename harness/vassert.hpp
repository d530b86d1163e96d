#pragma once
#include "common.hpp"
// contract assertions: VEQ(class, name, a, b, n) every a[i] = b[i]; VTOL within tol; VTRUE a fact about the path
#define VEQ(cls, name, a, b, n)                                                                                        \
    do {                                                                                                               \
        vout("E:" cls ":" name, 0, (a), (n), 1);                                                                       \
        vout("E:" cls ":" name, 1, (b), (n), 1);                                                                       \
    } while (0)
#define VTOL(cls, name, tol, a, b, n)                                                                                  \
    do {                                                                                                               \
        vout("T:" cls ":" name ":" tol, 0, (a), (n), 1);                                                               \
        vout("T:" cls ":" name ":" tol, 1, (b), (n), 1);                                                               \
    } while (0)
// a[i] <= b[i]
#define VLE(cls, name, a, b, n)                                                                                        \
    do {                                                                                                               \
        vout("L:" cls ":" name, 0, (a), (n), 1);                                                                       \
        vout("L:" cls ":" name, 1, (b), (n), 1);                                                                       \
    } while (0)
#define VTRUE(cls, name, ok) vint("B:" cls ":" name, 0, (ok) ? 1 : 0)
// positive numbers of any magnitude
#define VRATIO(cls, name, a, b)                                                                                        \
    do {                                                                                                               \
        const double q_ = (a) / (b), one_ = 1;                                                                         \
        VEQ(cls, name, &q_, &one_, 1);                                                                                 \
    } while (0)
// value vectors of possibly different length
#define VSAME(cls, name, x, y)                                                                                         \
    do {                                                                                                               \
        const Eigen::VectorXd x_ = (x), y_ = (y);                                                                      \
        VTRUE(cls, name ", size", x_.size() == y_.size());                                                             \
        if (x_.size() == y_.size()) VEQ(cls, name, x_.data(), y_.data(), x_.size());                                   \
    } while (0)
extern "C" void vexp(const double *v3, double *m9); // m = Exp(v), column major
inline Eigen::Matrix3d exp3(const Vector3d& v)
{
    Eigen::Matrix3d m;
    vexp(v.data(), m.data());
    return m;
}
// any rotation matrix, given by a unit quaternion
inline Eigen::Matrix3d quat3(const char *nm)
{
    double q[4];
    vquat(nm, q);
    double w = q[0], x = q[1], y = q[2], z = q[3];
    Eigen::Matrix3d m;
    m << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), 1 - 2 * (x * x + z * z),
        2 * (y * z - w * x), 2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y);
    return m;
}
