// Harness vocabulary. The v* functions have no body: symex.py gives them meaning.
#pragma once
#include <Eigen/Dense>
#include <vector>
#include <exception>
extern "C" {
double vsym(const char *name, int idx, int kind); // kind 0 real, 1 positive, 2 principal angle
void vunit(const char *name, double *v3);          // symbols on the unit sphere
void vquat(const char *name, double *q4);          // w, x, y, z on the unit sphere
void vrot(const char *name, double *v3, double *m9); // v fresh, m = Exp(v) (column major)
void vassume(double a, int pred, double b);        // 0 <, 1 <=, 2 >, 3 >=
int vchoose(const char *tag, int n);
void vout(const char *tag, int idx, const double *p, long r, long c);
void vint(const char *tag, int idx, long v);
// uninterpreted function number idx of that name applied to the n arguments (kind 1: positive)
double vuf(const char *name, int idx, const double *args, int n, int kind);
// cut point (engine/cut.py): the named values become arbitrary, everything else a function of them or arbitrary
void vcut_basis(const char *name, const double *p, int n, int kind);
void vcut_weak(const char *name, const double *p, int n, int kind); // only where not a function of the basis
void vcut_keep(const double *p, int n);                             // symbols that stay
void vcut_forget(const char *function);                                // its values become arbitrary
void vcut(const char *tag);
int vsame(double a, double b); // same term
}
inline Eigen::VectorXd vvec(const char *name, int n, int kind = 0)
{
    Eigen::VectorXd v(n);
    for (int i = 0; i < n; i++) v[i] = vsym(name, i, kind);
    return v;
}
inline Eigen::Vector3d vvec3(const char *name)
{
    return Eigen::Vector3d(vsym(name, 0, 0), vsym(name, 1, 0), vsym(name, 2, 0));
}
