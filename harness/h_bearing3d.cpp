#include "common.hpp"
#include "factorama/bearing_observation_factor.hpp"
#include "factorama/inverse_range_bearing_factor.hpp"
#include "factorama/bearing_projection_factor_2d.hpp"

extern "C" void h_bearing_observation()
{
    SymPose pose(1, "p", "w");
    LandmarkVariable lm(2, vvec3("l"));
    Vector3d b = vvec3("b");
    double sigma = vsym("sigma", 0, 1);
    vassume(b.squaredNorm(), 2, 0);
    Vector3d d = pose.v.dcm_CW() * (lm.pos_W() - pose.v.pos_W());
    vassume(d.squaredNorm(), 3, 1e-12);
    BearingObservationFactor f(3, &pose.v, &lm, b, sigma);
    VarRef vs[] = {{&pose.v, pose.v.dcm_CW().data()}, {&lm, 0}};
    drive(f, vs, 2);
}

extern "C" void h_inverse_range()
{
    SymPose pose(1, "p", "w");
    Vector3d b = vvec3("b"), o = vvec3("o"), bw = unit3("u");
    double sigma = vsym("sigma", 0, 1);
    vassume(b.squaredNorm(), 2, 0);
    InverseRangeVariable iv(2, o, bw, 1.0);
    VectorXd x(1);
    x[0] = vsym("rho", 0, 1);
    vassume(x[0], 3, 1e-6);
    vassume(x[0], 1, 1e3);
    iv.set_value_from_vector(x);
    Vector3d lmw = o + (1.0 / x[0]) * bw;
    Vector3d d = pose.v.dcm_CW() * (lmw - pose.v.pos_W());
    vassume(d.squaredNorm(), 3, 1e-12);
    InverseRangeBearingFactor f(3, &pose.v, &iv, b, sigma);
    VarRef vs[] = {{&pose.v, pose.v.dcm_CW().data()}, {&iv, 0}};
    drive(f, vs, 2);
}

extern "C" void h_bearing_projection()
{
    SymPose pose(1, "p", "w");
    LandmarkVariable lm(2, vvec3("l"));
    Vector3d b = unit3("b");
    double sigma = vsym("sigma", 0, 1);
    Vector3d d = pose.v.dcm_CW() * (lm.pos_W() - pose.v.pos_W());
    vassume(d.squaredNorm(), 3, 1e-12);
    BearingProjectionFactor2D f(3, &pose.v, &lm, b, sigma);
    VarRef vs[] = {{&pose.v, pose.v.dcm_CW().data()}, {&lm, 0}};
    drive(f, vs, 2);
}
