#pragma once
#include "vh.hpp"
#include "factorama/base_types.hpp"
#include "factorama/pose_variable.hpp"
#include "factorama/landmark_variable.hpp"
#include "factorama/generic_variable.hpp"
#include "factorama/rotation_variable.hpp"
#include "factorama/inverse_range_variable.hpp"
#include "factorama/plane_variable.hpp"
#include "factorama/pose_2d_variable.hpp"
using namespace factorama;
using Eigen::MatrixXd;
using Eigen::Vector3d;
using Eigen::VectorXd;

// ---- symbolic variables. Rotations: any rotation, given by the class invariant dcm = Exp(rotvec).
inline void abstract_rot(const char *nm, const double *v, const double *R)
{
    double v2[3], R2[9];
    vrot(nm, const_cast<double *>(v), const_cast<double *>(R));
    vrot(nm, v2, R2);
}
inline void check_rot(const char *nm, const VectorXd& val, int off, const Eigen::Matrix3d& R)
{
    double v2[3], R2[9];
    vrot(nm, v2, R2);
    int ok = 1;
    for (int i = 0; i < 3; i++) ok &= vsame(val[off + i], v2[i]);
    for (int i = 0; i < 9; i++) ok &= vsame(R.data()[i], R2[i]);
    if (!ok) vint("abstraction_failed", 0, 1);
}
struct SymPose
{
    PoseVariable v;
    static Eigen::Matrix<double, 6, 1> init(const char *pn)
    {
        Eigen::Matrix<double, 6, 1> x;
        x << vsym(pn, 0, 0), vsym(pn, 1, 0), vsym(pn, 2, 0), 0.0, 0.0, 0.0;
        return x;
    }
    SymPose(int id, const char *pn, const char *rn) : v(id, init(pn))
    {
        const VectorXd& val = v.value();
        const Eigen::Matrix3d& R = v.dcm_CW();
        vrot(rn, const_cast<double *>(val.data()) + 3, const_cast<double *>(R.data()));
        check_rot(rn, v.value(), 3, v.dcm_CW());
    }
};
struct SymRot
{
    RotationVariable v;
    SymRot(int id, const char *rn) : v(id, Eigen::Matrix3d::Identity())
    {
        const VectorXd& val = v.value();
        const Eigen::Matrix3d& R = v.rotation();
        vrot(rn, const_cast<double *>(val.data()), const_cast<double *>(R.data()));
        check_rot(rn, v.value(), 0, v.rotation());
    }
};
inline Vector3d unit3(const char *nm)
{
    Vector3d u;
    vunit(nm, u.data());
    return u;
}
inline Eigen::Matrix3d rot3(const char *nm)
{
    Eigen::Matrix3d m;
    double v[3];
    vrot(nm, v, m.data());
    return m;
}

// other variables in a general admissible state
inline Vector3d plane_normal(const char *nm) { return unit3(nm); }
inline Vector3d pose2(const char *pn, const char *tn)
{
    return Vector3d(vsym(pn, 0, 0), vsym(pn, 1, 0), vsym(tn, 0, 2));
}

// ---- generic factor driver
struct VarRef
{
    Variable *v;
    const double *R; // cached rotation, or null
};
inline void dump_state(const char *tag, const VarRef *vs, int n)
{
    for (int i = 0; i < n; i++) {
        const VectorXd& x = vs[i].v->value();
        vout(tag, i, x.data(), x.size(), 1);
        if (vs[i].R) vout(tag, 100 + i, vs[i].R, 9, 1);
        vint(tag, 200 + i, vs[i].v->is_constant());
    }
}
inline void garbage(MatrixXd& m, int k)
{
    for (long i = 0; i < m.size(); i++) m.data()[i] = vsym("garbage", k + int(i), 0);
}
// the residual of the factor, both entry points
template <class F> void drive_residual(F& f, const VarRef *vs, int n)
{
    dump_state("pre", vs, n);
    int rs = f.residual_size();
    vint("rsize", 0, rs);
    try {
        VectorXd r = f.compute_residual();
        vout("r1", 0, r.data(), r.rows(), r.cols());
        VectorXd big(rs + 4);
        for (int i = 0; i < big.size(); i++) big[i] = vsym("gr", i, 0);
        f.compute_residual(big.segment(2, rs));
        vout("r2", 0, big.data(), big.rows(), big.cols());
    } catch (const std::exception&) {
        vint("rthrow", 0, 1);
    }
    dump_state("post", vs, n);
}
// an earlier evaluation at other values, all variables free: the contract holds whatever was evaluated before
template <class F> void warm_up(F& f, const VarRef *vs, int n)
{
    std::vector<VectorXd> x;
    std::vector<Eigen::Matrix3d> R(n);
    for (int i = 0; i < n; i++) {
        x.push_back(vs[i].v->value());
        if (vs[i].R) R[i] = Eigen::Map<const Eigen::Matrix3d>(vs[i].R);
    }
    const int step[] = {3, 4, 12};
    try {
        for (int i = 0; i < n; i++) {
            VectorXd y(x[i].size());
            for (int k = 0; k < y.size(); k++) y[k] = 0.25 * (k + 1 + (i + 1) * step[k % 3]); // rational distances
            if (vs[i].R) y.tail(3).setZero();
            else if (y.size() == 4) y << 0, 0, 1, 0.25 * (i + 1);
            vs[i].v->set_value_from_vector(y);
        }
        VectorXd r = f.compute_residual();
        std::vector<MatrixXd> J;
        f.compute_jacobians(J);
    } catch (const std::exception&) {
    }
    for (int i = 0; i < n; i++) {
        if (!vs[i].R) vs[i].v->set_value_from_vector(x[i]);
        const VectorXd& y = vs[i].v->value();
        for (int k = 0; k < y.size(); k++) const_cast<double *>(y.data())[k] = x[i][k];
        if (PlaneVariable *pl = dynamic_cast<PlaneVariable *>(vs[i].v)) // the unit normal, not normalised again
            for (int k = 0; k < 3; k++) const_cast<double *>(pl->unit_vector().data())[k] = x[i][k];
        if (vs[i].R)
            for (int k = 0; k < 9; k++) const_cast<double *>(vs[i].R)[k] = R[i].data()[k];
    }
}
template <class F> void drive(F& f, const VarRef *vs, int n, bool allconst = true)
{
    int warm = vchoose("warm", 2);
    if (warm) warm_up(f, vs, n);
    for (int i = 0; i < n; i++) {
        bool c = vchoose("const", 2) == 1;
        vs[i].v->set_constant(c);
        vint("const", i, c);
        vint("vsize", i, vs[i].v->size());
    }
    drive_residual(f, vs, n);
    std::vector<Variable *> fv = f.variables();
    vint("nvars", 0, fv.size());
    for (int i = 0; i < n && i < (int)fv.size(); i++) vint("varid", i, fv[i] == vs[i].v);
    int js = 2 * vchoose("jstate", 3) + warm;
    vint("jstate", 0, js);
    int rs = f.residual_size();
    std::vector<MatrixXd> J;
    if (js == 1) { // right shapes, stale numbers
        J.resize(n);
        for (int i = 0; i < n; i++) {
            J[i].resize(rs, vs[i].v->size());
            garbage(J[i], 100 * i);
        }
    } else if (js == 2) { // right count, wrong shapes
        J.resize(n);
        for (int i = 0; i < n; i++) {
            J[i].resize(vs[i].v->size() + 1, rs + 2);
            garbage(J[i], 100 * i);
        }
    } else if (js == 3) { // too many
        J.resize(n + 2);
        for (int i = 0; i < n + 2; i++) {
            J[i].resize(2, 2);
            garbage(J[i], 100 * i);
        }
    } else if (js == 4) { // too few (or one too many for unary factors)
        int m = n > 1 ? n - 1 : 2;
        J.resize(m);
        for (int i = 0; i < m; i++) {
            J[i].resize(1, 3);
            garbage(J[i], 100 * i);
        }
    } else if (js == 5) { // right count, empty matrices
        J.resize(n);
    }
    try {
        f.compute_jacobians(J);
        vint("njac", 0, J.size());
        for (int i = 0; i < (int)J.size(); i++) vout("J", i, J[i].data(), J[i].rows(), J[i].cols());
    } catch (const std::exception&) {
        vint("jthrow", 0, 1);
    }
    dump_state("post2", vs, n);
}
